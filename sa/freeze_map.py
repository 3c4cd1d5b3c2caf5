MAP = {'P16': ('p_lut', 'subj'), 'P13': ('p_mov', 'subj13'), 'P14': ('p_mov', 'subj14'), 'P12': ('p_tsr', 'p12'), 'P15': ('p_tsr', 'p15'), 'P17': ('p_tsr', 'p17'), 'P18': ('p_tsr', 'p18'), 'P26': ('p_tsr', 'p26'), 'P30': ('p_out', 'p30'), 'P19': ('p_win', 'p19'), 'P27': ('p_iter', 'subj')}
