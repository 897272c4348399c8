"""Which explorations decide which property. Entries: (binary, module); a third element restricts it to a tier."""
def mc(*m): return [('mc', x) for x in m]
def asan(*m): return [('as', x) for x in m]
T = 'thorough'
DIL = mc('d_sign_len', 'd_sign_many', 'd_special', 'd_keys', 'd_bounds', 'd_hints', 'd_verify', 'd_foreign_keys', 'd_rare', 'd_usehint', 'd_folds')
SPH = mc('s_sign_cover', 's_lengths', 's_verify', 's_roots', 's_keys', 's_exact')
ED = mc('e_sign', 'e_many', 'e_special', 'e_tamper', 'e_folds', 'e_points', 'e_random')
KEC = mc('k_oneshot', 'k_align', 'k_seq', 'k_clone', 'k_split', 'k_pieces', 'k_blocks', 'k_interleave')
SHK = mc('x_wrapper', 'x_stream', 'x_lens', 'x_values', 'x_pairs')
NACL = mc('n_lengths', 'n_align', 'n_hashblocks', 'n_bytes', 'n_special', 'n_box', 'n_boxkeys')
RND = mc('r_answers', 'r_interrupts', 'r_big')
HYB_TAMPER = mc('h_parts_len', 'h_parts_values', 'h_tamper_compact', 'h_tamper_pk', 'h_tamper_full', 'h_tamper_msg', 'h_tamper_len', 'h_encodings', 'h_wrongroot')
ASAN_QUICK = ['h_null', 'h_wrap', 'h_header', 'h_smlen', 'h_outlen', 'h_verify_dil', 'd_hints', 'd_sign_len', 'd_verify', 'd_foreign_keys', 'd_bounds', 'k_oneshot', 'k_align', 'n_align', 'n_hashblocks', 'y_align', 'k_seq', 'k_clone', 'k_split', 'k_pieces', 'k_blocks', 'k_interleave', 'x_wrapper', 'x_stream', 'x_lens', 'x_values', 'n_lengths', 'n_box', 'f_rngfail', 'w_memory', 'w_facade', 'r_answers', 'r_interrupts', 'r_big', 'h_len_compact', 's_exact', 'h_crossmode', 'h_expander', 'e_sign', 'e_random']
ASAN_THOROUGH = ['h_bytes_compact', 'h_len_full', 'h_keys', 'h_parts_compact', 'h_parts_full', 'h_parts_len', 'h_parts_values', 'h_parts_pk', 'h_tamper_compact', 'h_tamper_pk', 'h_tamper_full', 'h_tamper_msg', 'h_tamper_len', 'h_encodings', 'h_wrongroot', 'h_keygen', 'h_keygen_random', 'd_sign_many', 'd_keys', 's_sign_cover', 's_lengths', 's_verify', 's_roots', 's_keys', 'e_many', 'e_tamper', 'e_points', 'n_bytes', 'n_special', 'n_boxkeys', 'f_fresh', 'y_repeat']
CHECKS = {
    'C01': mc('h_len_compact', 'h_bytes_compact', 'h_special', 'h_len_full', 'h_bytes_full', 'h_keys', 'd_sign_many', 'd_rare', 's_sign_cover', 'e_many') + [('mc', 'h_special_full', T)],
    'C02': mc('h_parts_compact', 'h_parts_full', 'h_parts_len', 'h_parts_values', 'h_parts_pk', 'h_crossmode', 'h_encodings', 'h_wrongroot', 'h_header', 'h_outlen', 'd_bounds', 'd_hints', 'd_usehint', 'd_verify', 'd_folds', 's_verify', 's_roots', 'e_tamper', 'e_folds', 'e_points'),
    'C03': [x for x in HYB_TAMPER if x[1] != 'h_parts_values'] + [('mc', 'h_parts_values', T)] + mc('d_bounds', 'd_hints', 'd_folds', 'e_tamper', 'e_folds', 's_verify', 's_roots'),
    'C04': mc('h_null', 'h_wrap', 'h_header', 'h_smlen', 'h_outlen', 'h_verify_dil'),
    'C05': mc('h_parts_len', 'h_null', 'h_wrap', 'h_header', 'h_smlen', 'h_outlen', 'h_parts_compact', 'h_encodings', 'h_wrongroot', 'h_tamper_compact', 'h_tamper_full', 'f_rngfail') + [('mc', 'h_parts_full', T), ('mc', 'h_tamper_len', T)],
    'C06': RND,
    'C07': mc('f_rngfail', 'f_fresh', 'h_keygen_random', 'e_random') + RND,
    'C08': mc('h_keygen', 'h_keygen_special', 'h_keygen_random', 'h_keys', 'd_keys', 's_keys'),
    'C09': mc('h_expander', 'h_expander_pairs', 'x_wrapper', 'x_values', 'x_pairs'),
    'C10': SHK + KEC + [('mc', 'l_expander', T)],
    'C11': KEC + [('mc', 'l_hash', T)],
    'C12': DIL + [('mc', 'l_dil', T)],
    'C13': SPH + [('mc', 'l_sph', T)],
    'C14': ED + [('mc', 'l_ed', T)],
    'C15': NACL + mc('l_nacl'),
    'C16': [('mt', 't_conflicts'), ('mt', 't_schedules')],
    'C17': asan(*ASAN_QUICK) + mc('h_parts_full', 's_verify', 'e_tamper', 'd_keys') + [x + (T,) for x in asan(*ASAN_THOROUGH)],
    'C21': [('ct', 'ct_traces')],
    'C18': mc('w_memory', 'w_facade', 'w_history', 'v_facade'),
    'C23': mc('v_facade', 'v_core'),
    'C22': mc('a_oom', 'w_memory', 'v_oom'),
    'C19': mc('y_residue', 'y_align', 'y_pairs', 'y_triples', 'y_near', 'y_folds', 'y_lens', 'y_twins', 'y_repeat'),
}
