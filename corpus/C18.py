[{"sub": 'small', "why": "a planted bug: getSubTree(1, 0) of spec {'M': {'rhbits': 1000, 'fhbits': 100, 'cbits': 1, 'pbits': 2, 'format': 'C', 'layout': 'contigu",
  "case": {'t': {'ranks': ['M', 'K'], 'shape': None, 'dims': [2, 3], 'default': 0, 'spec': [[1, [[0, 0]]]]}, 'xs': [], 'ops': [], 's': {'ranks': [{'rhbits': 1000, 'fhbits': 100, 'cbits': 1, 'pbits': 2, 'format': 'C'}, {'rhbits': 7000, 'fhbits': 10000, 'cbits': 20, 'pbits': 30, 'format': 'C'}], 'root': None, 'shared': False, 'other': False}, 'q': [[0], [1]]}},
 {"sub": 'built', "why": "a planted bug: getSubTree() of spec {'M': {'rhbits': 0, 'fhbits': 0, 'cbits': 0, 'pbits': 0, 'format': 'U', 'layout': 'contiguous'}, 'K",
  "case": {'t': {'ranks': ['M', 'K', 'N'], 'shape': [1, 1, 1], 'dims': [1, 1, 1], 'default': 0, 'spec': [], 'prov': 'populated', 'fmt': ['C', 'C', 'C']}, 'xs': [], 'ops': [], 's': {'ranks': [{'format': 'U'}, {}, {'cbits': 1, 'format': 'U'}], 'root': None, 'shared': True, 'other': False}, 'q': []}},
 {"sub": 'small', "why": "a planted bug: getRank('M') of spec {'M': {'rhbits': 1000, 'fhbits': 100, 'cbits': 1, 'pbits': 2, 'format': 'C', 'layout': 'contiguous'",
  "case": {'t': {'ranks': ['M', 'K'], 'shape': [2, 3], 'dims': [2, 3], 'default': 0, 'spec': [[1, []]]}, 'xs': [], 'ops': [], 's': {'ranks': [{'rhbits': 1000, 'fhbits': 100, 'cbits': 1, 'pbits': 2, 'format': 'C'}, {'rhbits': 7000, 'fhbits': 10000, 'cbits': 20, 'pbits': 30, 'format': 'U'}], 'root': None, 'shared': False, 'other': False}, 'q': [[0], [1]]}}]
