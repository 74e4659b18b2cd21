[{"sub": 'buffet', "why": "a planted bug: buffet traffic: got {'A': {'read': 0, 'write': 200}, 'B': {'read': 0, 'write': 0}, 'C': {'read': 0, 'write': 0}}, want {",
  "case": {'ranks': ['M', 'K', 'N'], 'binds': [{'tensor': 'A', 'own': [0, 2], 'type': 'elem', 'read': [], 'write': [[[1, 0, 0], 0], [[1, 0, 2], 0]], 'bits': 16, 'evict': 'M', 'shape': 1}, {'tensor': 'B', 'own': [0], 'type': 'elem', 'read': [], 'write': [], 'bits': 8, 'evict': 'root', 'shape': 8}, {'tensor': 'C', 'own': [2], 'type': 'coord', 'read': [], 'write': [], 'bits': 8, 'evict': 'K', 'shape': 8}], 'line': 100, 'cap': 0, 'part': 7, 'alias': True, 'outer': True, 'skew': 0, 'order': [0, 2, 1], 'flip': False, 'jitter': [0, 2, 0, 0]}},
 {"sub": 'buffet', "why": "a repaired defect: buffet traffic: got {'A': {'write': 32}, 'B': {'write': 0}}, want {'A': {'write': 0}, 'B': {'write': 0}}",
  "case": {'ranks': ['M'], 'binds': [{'tensor': 'A', 'own': [0], 'type': 'coord', 'read': None, 'write': [[[0], 5]], 'bits': 8, 'evict': 'root', 'shape': 4}, {'tensor': 'B', 'own': [0], 'type': 'coord', 'read': None, 'write': [], 'bits': 8, 'evict': 'root', 'shape': 8}], 'line': 32, 'cap': 0, 'part': 0, 'alias': True, 'skew': 0, 'order': [0, 1], 'jitter': [0, 0, 0, 0]}},
 {"sub": 'kernels', "why": "a repaired defect: filtered trace: got ['M_pos,M,fiber_pos\\n'], want ['M_pos,M,fiber_pos\\n', '3,3,5\\n']",
  "case": {'case': {'ranks': ['M'], 'dims': {'M': 8}, 'ops': [{'ranks': ['M'], 'spec': [[4, 5], [6, 3]], 'fmt': ['C'], 'known': True, 'proj': {'M': ['+', -1, None]}}, {'ranks': ['M'], 'spec': [[3, -2]], 'fmt': ['C'], 'known': False, 'proj': {}}], 'levels': [['and', ['f', 0], ['f', 1]]], 'z': {'ranks': ['M'], 'known': False, 'fmt': 'C', 'spec': [[4, 1]]}, 'act': '+=', 'probes': []}, 'picks': [{'rank': 'M', 'trace': 'populate_read_0', 'own': [False, False, False], 'type': 'coord', 'bits': 8, 'evict': 0, 'filter': True}], 'line': 32, 'cap': 0, 'part': 0, 'alias': False, 'order': [0], 'jitter': [0, 0, 0, 0]}},
 {"sub": 'cache', "why": "a repaired defect: cache traffic at 1 lines: got {'A': {'write': 0}, 'B': {'write': 0}, 'C': {'read': 64, 'write': 64}}, want [{'A': {'writ",
  "case": {'ranks': ['M'], 'binds': [{'tensor': 'A', 'own': [0], 'type': 'coord', 'read': None, 'write': [], 'bits': 8, 'evict': 'root', 'shape': 8}, {'tensor': 'B', 'own': [0], 'type': 'coord', 'read': None, 'write': [], 'bits': 24, 'evict': 'root', 'shape': 8}, {'tensor': 'C', 'own': [0], 'type': 'coord', 'read': [[[0], 0], [[0], 0], [[0], 0], [[0], 0], [[0], 0], [[0], 0], [[0], 0], [[0], 0], [[1], 0], [[1], 0], [[1], 4]], 'write': [[[0], 4], [[0], 6], [[0], 0]], 'bits': 8, 'evict': 'root', 'shape': 6}], 'line': 32, 'cap': 1, 'part': 0, 'alias': True, 'skew': 0, 'order': [0, 1, 2], 'jitter': [0, 0, 0, 0]}},
 {"sub": 'kernels', "why": 'a repaired defect: library raised ValueError: Unknown value: -2 (in traffic.py:_extractNext) on a legal input',
  "case": {'case': {'ranks': ['M', 'K'], 'dims': {'M': 5, 'K': 5}, 'ops': [{'ranks': ['M'], 'spec': [[3, -2]], 'fmt': ['C'], 'known': True, 'proj': {}}, {'ranks': ['M'], 'spec': [[2, 1], [3, 1]], 'fmt': ['C'], 'known': True, 'proj': {}}, {'ranks': ['K'], 'spec': [[0, -2], [1, -2]], 'fmt': ['C'], 'known': False, 'proj': {'K': ['+', -2, None]}}], 'levels': [['and', ['f', 0], ['f', 1]], ['f', 2]], 'z': {'ranks': ['K'], 'known': False, 'fmt': 'C', 'spec': []}, 'act': '+=', 'probes': []}, 'picks': [{'rank': 'K', 'trace': 'populate_1', 'own': [False, False, False], 'type': 'coord', 'bits': 8, 'evict': 0, 'filter': True}], 'line': 32, 'cap': 0, 'part': 0, 'alias': False, 'order': [0], 'jitter': [0, 0, 0, 0]}},
 {"sub": 'buffet', "why": "a planted bug: buffet traffic: got {'A': {'write': 0}, 'B': {'read': 32, 'write': 0}}, want {'A': {'write': 0}, 'B': {'read': 64, 'writ",
  "case": {'ranks': ['M', 'K'], 'binds': [{'tensor': 'A', 'own': [1], 'type': 'coord', 'read': None, 'write': [], 'bits': 8, 'evict': 'root', 'shape': 8}, {'tensor': 'B', 'own': [1], 'type': 'coord', 'read': [[[0, 0], 0], [[0, 0], 0], [[0, 0], 0], [[0, 0], 0], [[0, 0], 0], [[0, 0], 0], [[0, 0], 0], [[0, 0], 0], [[0, 0], 0], [[0, 0], 0], [[0, 0], 0], [[0, 0], 0], [[1, 0], 0]], 'write': [], 'bits': 8, 'evict': 'K', 'shape': 8}], 'line': 32, 'cap': 0, 'part': 0, 'alias': True, 'skew': 0, 'order': [0, 1], 'flip': False, 'jitter': [0, 0, 0, 0]}},
 {"sub": 'buffet', "why": "a mutant: buffet traffic: got {'A': {'read': 0}, 'B': {'write': 0}}, want {'A': {'read': 0}, 'B': {'write': 32}}",
  "case": {'ranks': ['M'], 'binds': [{'tensor': 'A', 'own': [0], 'type': 'coord', 'read': [], 'write': None, 'bits': 8, 'evict': 'root', 'shape': 8}, {'tensor': 'B', 'own': [0], 'type': 'coord', 'read': None, 'write': [[[0], 0]], 'bits': 8, 'evict': 'root', 'shape': 8}], 'line': 32, 'cap': 0, 'part': 0, 'alias': True, 'skew': 0, 'order': [0, 1], 'jitter': [0, 0, 0, 0]}},
 {"sub": 'cache', "why": "a mutant: cache traffic at 2 lines: got {'A': {'read': 256}, 'B': {'read': 256}, 'C': {'read': 1152}}, want [{'A': {'read': 256}, ",
  "case": {'ranks': ['M', 'K', 'N'], 'binds': [{'tensor': 'A', 'own': [0, 1], 'type': 'elem', 'read': [[[1, 0], 3], [[2, 0], 7]], 'write': None, 'bits': 32, 'evict': 'M', 'shape': 6}, {'tensor': 'B', 'own': [2], 'type': 'coord', 'read': [[[0, 0, 0], 5], [[0, 0, 1], 2], [[0, 0, 2], 6], [[0, 0, 2], 5], [[1, 0, 0], 1], [[1, 0, 1], 5], [[1, 0, 2], 4], [[1, 0, 2], 0], [[2, 0, 0], 3], [[2, 0, 2], 0]], 'write': None, 'bits': 24, 'evict': 'M', 'shape': 8}, {'tensor': 'C', 'own': [0], 'type': 'elem', 'read': [[[0], 0], [[0], 6], [[0], 7], [[0], 1], [[1], 7], [[1], 4], [[1], 5], [[1], 7], [[1], 0], [[1], 6], [[1], 6], [[2], 4], [[2], 6], [[2], 4]], 'write': None, 'bits': 16, 'evict': 'root', 'shape': 8}], 'line': 128, 'cap': 2, 'part': 0, 'alias': True, 'skew': 0, 'order': [0, 1, 2], 'jitter': [4, 7, 6, 3]}},
 {"sub": 'kernels', "why": "a mutant: buffet traffic: got {'A': {'read': 64}}, want {'A': {'read': 128}}",
  "case": {'case': {'ranks': ['M', 'K', 'N'], 'dims': {'M': 4, 'K': 4, 'N': 4}, 'ops': [{'ranks': ['M', 'N'], 'spec': [[3, [[0, -2], [1, -1], [2, -1], [3, 2]]]], 'fmt': ['C', 'C'], 'known': True, 'proj': {}}, {'ranks': ['M', 'K', 'N'], 'spec': [[0, [[1, [[0, 3], [1, -2], [3, 2]]]]], [1, [[2, [[1, 5], [2, 3]]]]], [2, [[0, [[1, 3], [3, -1]]], [2, [[0, 2], [1, 3], [3, -2]]]]], [3, []]], 'fmt': ['C', 'C', 'C'], 'known': True, 'proj': {'M': ['-', 0, None]}}], 'levels': [['or', ['f', 0], ['f', 1]], ['f', 1], ['and', ['f', 0], ['f', 1]]], 'z': {'ranks': [], 'known': False, 'fmt': 'C', 'spec': []}, 'act': '+=', 'probes': []}, 'picks': [{'rank': 'M', 'trace': 'iter', 'own': [False, False, False], 'type': 'coord', 'bits': 32, 'evict': 3, 'filter': False}], 'line': 32, 'cap': 0, 'part': 0, 'alias': False, 'order': [0], 'jitter': [0, 0, 1, 0]}}]
