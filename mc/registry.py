"""Property id -> (module in checks/, function, level)."""
CHECKS = {
    'P01': ('path', 'run_p01', 'model_checking'),
    'J01': ('json_stream', 'run_j01', 'model_checking'),
    'J02': ('json_stream', 'run_j02', 'model_checking'),
    'J03': ('json_stream', 'run_j03', 'model_checking'),
    'C01': ('lru', 'run_c01', 'model_checking'),
    'T01': ('tracing', 'run_t01', 'model_checking'),
    'T02': ('tracing', 'run_t02', 'model_checking'),
    'Q01': ('tqdm_check', 'run_q01', 'model_checking'),
    'Q02': ('tqdm_check', 'run_q02', 'model_checking'),
    'Q03': ('tqdm_check', 'run_q03', 'model_checking'),
    'F01': ('fileio', 'run_f01', 'model_checking'),
    'D01': ('pyconv', 'run_d01', 'model_checking'),
    'D02': ('pyconv', 'run_d02', 'model_checking'),
    'K01': ('pyconv', 'run_k01', 'model_checking'),
    'S01': ('dbm', 'run_s01', 'model_checking'),
    'S02': ('dbm', 'run_s02', 'model_checking'),
    'S03': ('dbm', 'run_s03', 'model_checking'),
    'S04': ('dbm', 'run_s04', 'model_checking'),
    'S05': ('dsm', 'run_s05', 'model_checking'),
    'S06': ('dsm', 'run_s06', 'model_checking'),
    'S07': ('dsm', 'run_s07', 'model_checking'),
    'S09': ('dsm2', 'run_s09', 'model_checking'),
    'S10': ('dsm2', 'run_s10', 'model_checking'),
    'S11': ('dsm2', 'run_s11', 'model_checking'),
    'S08': ('dsm', 'run_s08', 'model_checking'),
    'R01': ('parallel', 'run_r01', 'model_checking'),
    'R02': ('parallel', 'run_r02', 'model_checking'),
    'R03': ('parallel', 'run_r03', 'model_checking'),
    'R04': ('parallel', 'run_r04', 'model_checking'),
    'R05': ('parallel', 'run_r05', 'model_checking'),
    'R06': ('parallel', 'run_r06', 'model_checking'),
    'R07': ('parallel', 'run_r07', 'model_checking'),
    'B01': ('core_lib', 'run_b01', 'model_checking'),
    'B02': ('core_lib', 'run_b02', 'model_checking'),
    'B03': ('core_lib', 'run_b03', 'model_checking'),
    'B04': ('core_lib', 'run_b04', 'model_checking'),
    'B05': ('core_lib', 'run_b05', 'model_checking'),
    'B06': ('core_lib', 'run_b06', 'model_checking'),
    'B07': ('core_lib', 'run_b07', 'model_checking'),
    'B08': ('core_lib', 'run_b08', 'model_checking'),
    'B09': ('core_lib', 'run_b09', 'model_checking'),
    'B10': ('core_lib', 'run_b10', 'model_checking'),
    'B11': ('core_lib', 'run_b11', 'model_checking'),
    'B13': ('core_lib', 'run_b13', 'model_checking'),
}
