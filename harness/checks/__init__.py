REGISTRY = {
    'C01': ('spelling', 'indian'),
    'C02': ('spelling', 'historic'),
    'C03': ('spelling', 'minority'),
    'C04': ('spelling', 'sea'),
    'C05': ('spelling', 'reading'),
    'C06': ('spelling', 'roman'),
    'C07': ('spelling', 'latin'),
    'C08': ('session', 'session'),
    'C09': ('anytext', 'document'),
    'C10': ('anytext', 'totality'),
    'C11': ('spelling', 'rare'),
    'C12': ('files', 'files'),
    'C13': ('names', 'names'),
    'C14': ('styles', 'nativized'),
    'C15': ('styles', 'optional'),
}
