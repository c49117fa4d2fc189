"""property id -> (module, function, level)"""
TABLE = {
    'P01': ('where', 'comparisons', 'other'),
    'P02': ('where', 'nulls', 'other'),
    'P03': ('where', 'logic', 'other'),
    'P04': ('where', 'scans', 'other'),
    'P05': ('where', 'assigns', 'other'),
    'P06': ('insert', 'inserts', 'other'),
    'P07': ('select', 'projection', 'other'),
    'P08': ('select', 'cursor', 'other'),
    'P09': ('storage', 'vacuum', 'other'),
    'P13': ('select', 'grouping', 'other'),
    'P19': ('select', 'joins', 'other'),
    'P22': ('storage', 'columns', 'other'),
    'P23': ('storage', 'primitives', 'other'),
    'P10': ('statements', 'definitions', 'other'),
    'P11': ('statements', 'strictness', 'other'),
    'P12': ('statements', 'writing', 'other'),
    'P14': ('statements', 'no_storage', 'other'),
    'P16': ('statements', 'locking', 'other'),
    'P15': ('statements', 'messages', 'other'),
    'P17': ('statements', 'literals', 'other'),
    'P18': ('containers', 'containers', 'other'),
    'P27': ('containers', 'trees', 'other'),
    'P20': ('statements', 'computing', 'other'),
    'P21': ('statements', 'storage_released', 'other'),
    'P24': ('statements', 'supported', 'other'),
}
