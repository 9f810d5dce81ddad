"""property id -> check module"""
CHECKS = {
    'C01': 'gil',
    'C02': 'planner',
    'C03': 'ownership',
    'C04': 'nullness',
    'C05': 'races',
    'C06': 'history',
    'C07': 'frames',
    'C08': 'header',
    'C09': 'samples',
    'C10': 'names',
    'C11': 'inputs',
    'C12': 'pyhistory',
    'C13': 'pypack',
    'C14': 'pyinspect',
    'C15': 'pymove',
    'C16': 'pyscope',
    'C17': 'pyover',
    'C18': 'pytele',
    'C19': 'pycache_',
    'C20': 'pyarch',
    'C21': 'pyprog',
    'C22': 'pyvalues',
    'C23': 'pyround',
    'C24': 'bounds',
}
