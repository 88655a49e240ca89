"""property id -> (module, function, level)"""
REGISTRY = {
    'K01': ('kinematic', 'relations', 'other'),
    'K02': ('kinematic', 'units', 'other'),
    'S01': ('switchyard', 'readers', 'other'),
    'S02': ('switchyard', 'writers', 'other'),
    'S03': ('switchyard', 'dispatch', 'other'),
    'B01': ('bunch', 'twiss', 'other'),
    'B02': ('bunch', 'distributions', 'other'),
    'B04': ('bunch', 'validation', 'other'),
    'X01': ('physics', 'decoherence', 'other'),
    'X02': ('physics', 'phases', 'other'),
    'L04': ('physics', 'insert', 'other'),
    'C01': ('physics', 'constants', 'other'),
    'T01': ('stats', 'stats', 'other'),
    'T02': ('stats', 'sampling', 'other'),
    'R01': ('rsptcls', 'twiss', 'other'),
    'R02': ('rsptcls', 'containers', 'other'),
    'R03': ('rsptcls', 'generation', 'other'),
    'D01': ('sdds', 'writer', 'other'),
    'D02': ('sdds', 'rejected', 'other'),
    'D03': ('sdds', 'reader', 'other'),
    'D04': ('sdds', 'pages', 'other'),
    'D05': ('sdds', 'header', 'other'),
    'L01': ('lattice', 'elements', 'other'),
    'L02': ('lattice', 'beamline', 'other'),
    'L03': ('lattice', 'matrices', 'other'),
    'L05': ('lattice', 'trace', 'other'),
    'L06': ('lattice', 'imports', 'other'),
    'W01': ('lattice', 'warp', 'other'),
    'P01': ('plots', 'profile', 'other'),
    'P02': ('plots', 'phase', 'other'),
    'P03': ('plots', 'helpers', 'other'),
    'H01': ('hygiene', 'resources', 'other'),
    'H02': ('hygiene', 'arguments', 'other'),
    'H03': ('hygiene', 'shared', 'other'),
    'H04': ('hygiene', 'names', 'other'),
    'H05': ('hygiene', 'code', 'other'),
}
