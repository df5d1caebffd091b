# property id -> binary (target in harness/checks.cmake)
CHECKS = {
    'P01': {'binary': 'p01_kernels'},
    'P02': {'binary': 'p02_convolver'},
    'P03': {'binary': 'p03_crossfade'},
    'P04': {'binary': 'p04_delay'},
    'P05': {'binary': 'p05_gains'},
    'P06': {'binary': 'p06_filters'},
    'P07': {'binary': 'p07_tf'},
    'P08': {'binary': 'p08_flow'},
    'P09': {'binary': 'p09_validate'},
    'P10': {'binary': 'p10_params'},
    'P11': {'binary': 'p11_buffering'},
    'P12': {'binary': 'p12_objects'},
    'P13': {'binary': 'p13_notation'},
    'P14': {'binary': 'p14_filterdesign'},
    'P15': {'binary': 'p15_matrices'},
    'P16': {'binary': 'p16_geometry'},
    'P17': {'binary': 'p17_arrays'},
    'P18': {'binary': 'p18_panning'},
    'P19': {'binary': 'p19_adaptive'},
    'P20': {'binary': 'p20_scene'},
    'P21': {'binary': 'p21_renderer'},
    'P22': {'binary': 'p22_reverb'},
    'P23': {'binary': 'p23_network'},
    'P28': {'binary': 'p28_soundcard'},
    'P29': {'binary': 'p29_apps'},
    'P30': {'binary': 'p30_values'},
    'P24': {'python': 'p24_pyarrays.py', 'modules': ['visr', 'efl', 'rbbl', 'pml', 'objectmodel']},
    'P25': {'python': 'p25_pydata.py', 'modules': ['visr', 'efl', 'rbbl', 'pml', 'objectmodel', 'panning', 'panningdsp', 'rrl']},
    'P26': {'python': 'p26_pyflow.py', 'modules': ['visr', 'efl', 'rbbl', 'pml', 'objectmodel', 'rrl', 'rcl']},
    'P27': {'python': 'p27_binaural.py', 'modules': ['visr', 'efl', 'rbbl', 'pml', 'objectmodel', 'panning', 'rrl', 'rcl', 'signalflows']},
    'P31': {'embedded': 'p31_embedded', 'modules': ['visr', 'efl', 'rbbl', 'pml', 'objectmodel', 'panning', 'rcl']},
    'P32': {'python': 'p32_arrayconfig.py', 'modules': ['visr', 'efl', 'rbbl', 'pml', 'objectmodel', 'panning']},
    'P33': {'python': 'p33_metadapter.py', 'modules': ['visr', 'efl', 'rbbl', 'pml', 'objectmodel', 'rrl']},
    'P34': {'binary': 'p34_transitions'},
    'P35': {'binary': 'p35_utility'},
}
