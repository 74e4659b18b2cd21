[{"sub": 'calls', "why": "a repaired defect: in-memory trace M-iter: got [], want [['M_pos', 'M', 'fiber_pos']]",
  "case": [['matchRanks', 'Mx', 'M'], ['trace', 'M', 'iter', False], ['registerRank', 'M'], ['incIter', 'M'], ['trace', 'M', 'iter', True]]},
 {"sub": 'nests', "why": 'a repaired defect: trace Mx-project_0: position of the row at (7,): got 1, want 2',
  "case": {'kind': 'nest', 'case': {'ranks': ['M'], 'dims': {'M': 8}, 'ops': [{'ranks': ['M'], 'spec': [[2, 3], [4, 0], [7, 2]], 'fmt': ['C'], 'known': False, 'proj': {'M': ['+', 0, None]}}], 'levels': [['f', 0]], 'z': {'ranks': [], 'known': False, 'fmt': 'C', 'spec': []}, 'act': '+=', 'probes': []}, 'traces': [['M', 'iter', 'file'], ['Mx', 'project_0', 'file']], 'flush': 2, 'flush2': 2, 'eat': 0, 'stop': None}},
 {"sub": 'nests', "why": 'a repaired defect: library raised AssertionError:  (in iterators.py:__iter__) on a legal input',
  "case": {'kind': 'nest', 'case': {'ranks': ['M', 'K'], 'dims': {'M': 5, 'K': 5}, 'ops': [{'ranks': ['M', 'K'], 'spec': [[3, [[0, -1], [4, 2]]]], 'fmt': ['C', 'C'], 'known': False, 'proj': {'M': ['+', 1, None]}}], 'levels': [['f', 0], ['f', 0]], 'z': {'ranks': ['M'], 'known': False, 'fmt': 'C', 'spec': [[3, -2]]}, 'act': '+=', 'probes': []}, 'traces': [['M', 'iter', 'file']], 'flush': 2, 'flush2': 2, 'eat': 0, 'stop': None}},
 {"sub": 'nests', "why": 'a repaired defect: trace M-iter: stamp (0,) after (0,)',
  "case": {'kind': 'nest', 'case': {'ranks': ['M'], 'dims': {'M': 8}, 'ops': [{'ranks': ['M'], 'spec': [], 'fmt': ['C'], 'known': False, 'proj': {}}, {'ranks': ['M'], 'spec': [[3, -2]], 'fmt': ['C'], 'known': True, 'proj': {}}, {'ranks': ['M'], 'spec': [[3, -2]], 'fmt': ['C'], 'known': True, 'proj': {}}], 'levels': [['sub', ['f', 1], ['and', ['f', 0], ['f', 2]]]], 'z': {'ranks': [], 'known': True, 'fmt': 'C', 'spec': []}, 'act': '+=', 'probes': []}, 'traces': [['M', 'iter', 'file'], ['M', 'intersect_0', 'file'], ['M', 'intersect_1', 'file']], 'flush': 2, 'flush2': 2, 'eat': 2, 'stop': None}},
 {"sub": 'nests', "why": 'a planted bug: trace M-intersect_2: coordinates of the rows: got [(3,), (3,)], want [(3,)]',
  "case": {'kind': 'nest', 'case': {'ranks': ['M', 'K'], 'dims': {'M': 5, 'K': 5}, 'ops': [{'ranks': ['M'], 'spec': [[3, -2]], 'fmt': ['C'], 'known': True, 'proj': {'M': ['+', 0, None]}}, {'ranks': ['M', 'K'], 'spec': [], 'fmt': ['C', 'C'], 'known': False, 'proj': {}}, {'ranks': ['M'], 'spec': [], 'fmt': ['C'], 'known': False, 'proj': {}}, {'ranks': ['M', 'K'], 'spec': [], 'fmt': ['C', 'C'], 'known': False, 'proj': {}}], 'levels': [['lf', ['f', 0], ['f', 1], ['f', 2], ['f', 3]], ['and', ['f', 1], ['f', 3]]], 'z': {'ranks': [], 'known': False, 'fmt': 'C', 'spec': []}, 'act': '+=', 'probes': [], 'quiet': [(0, 0, 'occ')]}, 'traces': [['M', 'intersect_2', 'file']], 'flush': 2, 'flush2': 2, 'eat': 0, 'stop': None}},
 {"sub": 'nests', "why": 'a planted bug: trace M-union_1: coordinates of the rows: got [], want [(0,)]',
  "case": {'kind': 'nest', 'case': {'ranks': ['M', 'K'], 'dims': {'M': 5, 'K': 4}, 'ops': [{'ranks': ['K'], 'spec': [[1, -2]], 'fmt': ['C'], 'known': True, 'proj': {}}, {'ranks': ['M', 'K'], 'spec': [], 'fmt': ['C', 'C'], 'known': True, 'proj': {'M': ['+', 3, None]}}, {'ranks': ['M', 'K'], 'spec': [], 'fmt': ['C', 'C'], 'known': True, 'proj': {'M': ['+', 0, None]}}, {'ranks': ['M', 'K'], 'spec': [[0, [[0, 5]]]], 'fmt': ['C', 'C'], 'known': True, 'proj': {}}], 'levels': [['or', ['and', ['f', 1], ['f', 2]], ['f', 3]], ['and', ['f', 0], ['and', ['f', 1], ['and', ['f', 2], ['f', 3]]]]], 'z': {'ranks': [], 'known': False, 'fmt': 'C', 'spec': []}, 'act': '+=', 'probes': []}, 'traces': [['M', 'union_1', 'file']], 'flush': 2, 'flush2': 2, 'eat': 0, 'stop': None}},
 {"sub": 'eager', "why": "a mutant: trace t-M-eager.csv: row ['M_pos', 'M', 'fiber_pos'] is not numeric",
  "case": {'sh': [2], 'spec': [], 'at': 0, 'ranks': [0], 'mem': True, 'own': False, 'after': False, 'flush': 3}},
 {"sub": 'eager', "why": "a mutant: eager trace of M: header: got ['M_pos', 'K_pos', 'M', 'K', 'fiber_pos'], want ['M_pos', 'M', 'fiber_pos']",
  "case": {'sh': [1, 1], 'spec': [], 'at': 0, 'ranks': [0], 'mem': False, 'own': False, 'after': False, 'flush': 2}},
 {"sub": 'nests', "why": 'a mutant: trace K-iter: coordinates of the rows: got [], want [(0, 1), (0, 4)]',
  "case": {'kind': 'nest', 'case': {'ranks': ['M', 'K'], 'dims': {'M': 5, 'K': 5}, 'ops': [{'ranks': ['M', 'K'], 'spec': [[0, [[0, 5], [3, 5]]]], 'fmt': ['U', 'C'], 'known': True, 'proj': {'K': ['+', 1, None]}}], 'levels': [['f', 0], ['f', 0]], 'z': {'ranks': [], 'known': False, 'fmt': 'C', 'spec': []}, 'act': '+=', 'probes': []}, 'traces': [['M', 'iter', 'file'], ['K', 'iter', 'file'], ['Kx', 'project_0', 'file']], 'flush': 2, 'flush2': 3, 'eat': 0, 'stop': None}},
 {"sub": 'calls', "why": "a mutant: trace M-iter: got '', want 'M_pos,M,fiber_pos\\n'",
  "case": [['registerRank', 'M'], ['incIter', 'M'], ['addUse', 'M', 0, 0, 'iter', [0, 0, 0]], ['addUse', 'M', 0, 0, 'iter', [0, 0, 0]], ['setNumCachedUses', 2], ['incIter', 'M'], ['addUse', 'M', 0, 0, 'iter', None], ['addUse', 'M', 0, 0, 'iter', None], ['incIter', 'M'], ['addUse', 'M', 0, 0, 'iter', [0, 0, 0]], ['addUse', 'M', 0, 0, 'iter', None], ['trace', 'M', 'iter', True], ['incIter', 'M'], ['addUse', 'M', 0, 0, 'iter', None], ['trace', 'M', 'iter', False], ['incIter', 'M'], ['incIter', 'M'], ['getIndex', 'M']]},
 {"sub": 'calls', "why": "a mutant: trace M-iter: got '', want 'M_pos,M,fiber_pos\\n'",
  "case": [['registerRank', 'M'], ['incIter', 'M'], ['addUse', 'M', 0, 0, 'iter', [0, 0, 0]], ['addUse', 'M', 0, 0, 'iter', [0, 0, 0]], ['setNumCachedUses', 2], ['incIter', 'M'], ['addUse', 'M', 0, 0, 'iter', None], ['addUse', 'M', 0, 0, 'iter', None], ['incIter', 'M'], ['addUse', 'M', 0, 0, 'iter', [0, 0, 0]], ['addUse', 'M', 0, 0, 'iter', None], ['trace', 'M', 'iter', True], ['incIter', 'M'], ['addUse', 'M', 0, 0, 'iter', None], ['trace', 'M', 'iter', False], ['incIter', 'M'], ['incIter', 'M'], ['getIndex', 'M'], ['trace', 'Mx', 'iter', False]]},
 {"sub": 'calls', "why": "a mutant: in-memory trace M-iter: got [['M_pos', 'M', 'fiber_pos'], [4, 0, 0], ['M_pos', 'M', 'fiber_pos'], [6, 0, 3]], want [['M_",
  "case": [['registerRank', 'M'], ['incIter', 'M'], ['addUse', 'M', 0, 0, 'iter', [0, 0, 0]], ['addUse', 'M', 0, 0, 'iter', [0, 0, 0]], ['setNumCachedUses', 2], ['incIter', 'M'], ['addUse', 'M', 0, 0, 'iter', None], ['addUse', 'M', 0, 0, 'iter', None], ['incIter', 'M'], ['addUse', 'M', 0, 0, 'iter', [0, 0, 0]], ['addUse', 'M', 0, 0, 'iter', None], ['trace', 'M', 'iter', True], ['incIter', 'M'], ['addUse', 'M', 0, 0, 'iter', None], ['trace', 'M', 'iter', False], ['incIter', 'M'], ['incIter', 'M'], ['getIndex', 'M'], ['trace', 'M', 't1', True], ['trace', 'Mx', 'iter', True], ['addUse', 'M', 0, 3, 'iter', None]]},
 {"sub": 'nests', "why": 'a mutant: trace M-intersect_0: position of the row at (4,): got 2, want 1',
  "case": {'kind': 'nest', 'case': {'ranks': ['M'], 'dims': {'M': 8}, 'ops': [{'ranks': ['M'], 'spec': [[2, -2], [4, 5], [5, 5], [6, -2], [7, 1]], 'fmt': ['C'], 'known': True, 'proj': {'M': ['+', 0, None]}}, {'ranks': ['M'], 'spec': [[3, -2]], 'fmt': ['C'], 'known': False, 'proj': {}}, {'ranks': ['M'], 'spec': [[3, -2]], 'fmt': ['C'], 'known': True, 'proj': {}}], 'levels': [['sub', ['f', 2], ['and', ['f', 0], ['f', 1]]]], 'z': {'ranks': [], 'known': False, 'fmt': 'C', 'spec': []}, 'act': '+=', 'probes': []}, 'traces': [['M', 'iter', 'file'], ['M', 'intersect_0', 'file'], ['M', 'intersect_1', 'file'], ['Mx', 'project_2', 'file']], 'flush': 2, 'flush2': 2, 'eat': 0, 'stop': None}},
 {"sub": 'nests', "why": 'a mutant: trace M-populate_read_0: staged coordinates at (): got [], want [2]',
  "case": {'kind': 'nest', 'case': {'ranks': ['M', 'K'], 'dims': {'M': 5, 'K': 2}, 'ops': [{'ranks': ['M', 'K'], 'spec': [[0, [[0, -1], [1, 1]]], [1, [[0, -2], [1, -1]]], [2, [[0, 1], [1, -1]]], [3, [[0, -1], [1, 3]]], [4, [[0, 0]]]], 'fmt': ['C', 'C'], 'known': False, 'proj': {}}], 'levels': [['f', 0], ['f', 0]], 'z': {'ranks': ['M', 'K'], 'known': True, 'fmt': 'C', 'spec': [[0, [[0, 3], [1, -1]]], [1, [[0, -2], [1, 2]]], [3, [[0, 2], [1, 0]]]]}, 'act': 'some', 'probes': []}, 'traces': [['M', 'populate_1', 'file'], ['M', 'populate_read_0', 'file'], ['K', 'populate_1', 'file'], ['M', 'intersect_7', 'file'], ['Q', 'iter', 'file']], 'flush': 5, 'flush2': 1000, 'eat': 1, 'stop': None}},
 {"sub": 'nests', "why": "a mutant: trace Mx-project_2: header: got ['M_pos', 'Mx_pos', 'M', 'Mx', 'fiber_pos'], want ['M_pos', 'M', 'fiber_pos']",
  "case": {'kind': 'nest', 'case': {'ranks': ['M', 'K'], 'dims': {'M': 5, 'K': 5}, 'ops': [{'ranks': ['M'], 'spec': [[1, 3], [2, 3], [4, -2]], 'fmt': ['C'], 'known': True, 'proj': {'M': ['-', 1, None]}}, {'ranks': ['M', 'K'], 'spec': [], 'fmt': ['C', 'C'], 'known': True, 'proj': {'K': ['+', 2, None]}}, {'ranks': ['M', 'K'], 'spec': [], 'fmt': ['C', 'C'], 'known': True, 'proj': {}}], 'levels': [['or', ['coshape', 2, 1], ['f', 0]], ['sub', ['f', 1], ['f', 2]]], 'z': {'ranks': [], 'known': True, 'fmt': 'C', 'spec': []}, 'act': '*=', 'probes': []}, 'traces': [['M', 'iter', 'file'], ['M', 'union_0', 'both'], ['M', 'union_1', 'file'], ['Mx', 'project_2', 'mem'], ['K', 'iter', 'mem'], ['Kx', 'project_0', 'file']], 'flush': 2, 'flush2': 3, 'eat': 0, 'stop': None}},
 {"sub": 'nests', "why": 'a mutant: library raised AssertionError:  (in metrics.py:incIter) on a legal input',
  "case": {'kind': 'nest', 'case': {'ranks': ['M', 'K'], 'dims': {'M': 4, 'K': 2}, 'ops': [{'ranks': ['M', 'K'], 'spec': [[1, []]], 'fmt': ['C', 'C'], 'known': True, 'proj': {'M': ['+', 0, None]}}, {'ranks': ['M', 'K'], 'spec': [[3, [[0, -1]]]], 'fmt': ['C', 'C'], 'known': True, 'proj': {'M': ['+', 0, None]}}], 'levels': [['or', ['f', 0], ['f', 1]], ['and', ['f', 0], ['f', 1]]], 'z': {'ranks': ['K'], 'known': False, 'fmt': 'C', 'spec': []}, 'act': '<<=', 'probes': []}, 'traces': [['M', 'iter', 'file'], ['M', 'union_0', 'file'], ['M', 'union_1', 'both'], ['Mx', 'project_2', 'both'], ['Mx', 'project_3', 'file'], ['K', 'iter', 'file'], ['K', 'populate_1', 'both'], ['K', 'populate_read_0', 'file'], ['K', 'populate_write_0', 'mem'], ['K', 'intersect_2', 'file'], ['K', 'intersect_3', 'file']], 'flush': 2, 'flush2': 1000, 'eat': 0, 'stop': None}},
 {"sub": 'nests', "why": 'a mutant: library raised AssertionError:  (in iterators.py:__iter__) on a legal input',
  "case": {'kind': 'nest', 'case': {'ranks': ['M', 'K', 'N'], 'dims': {'M': 4, 'K': 3, 'N': 1}, 'ops': [{'ranks': ['M', 'K', 'N'], 'spec': [[0, [[0, [[0, 3]]], [2, [[0, -2]]]]], [2, [[0, [[0, -1]]], [1, [[0, 2]]]]]], 'fmt': ['C', 'C', 'C'], 'known': False, 'proj': {'M': ['+', 0, [0, 4]]}}], 'levels': [['f', 0], ['f', 0], ['f', 0]], 'z': {'ranks': ['M', 'K', 'N'], 'known': False, 'fmt': 'C', 'spec': [[0, [[0, [[0, 3]]], [2, [[0, -2]]]]], [2, [[0, [[0, -1]]], [1, [[0, 2]]]]]]}, 'act': '-=', 'probes': []}, 'traces': [['M', 'iter', 'file'], ['M', 'populate_1', 'file'], ['M', 'populate_read_0', 'file'], ['M', 'populate_write_0', 'file'], ['Mx', 'project_2', 'both'], ['K', 'iter', 'file'], ['K', 'populate_1', 'both'], ['K', 'populate_read_0', 'mem'], ['K', 'populate_write_0', 'mem'], ['N', 'iter', 'file'], ['N', 'populate_1', 'file'], ['N', 'populate_read_0', 'both'], ['N', 'populate_write_0', 'both']], 'flush': 3, 'flush2': 11, 'eat': 2, 'stop': None}},
 {"sub": 'nests', "why": 'a mutant: trace K-intersect_1: position of the row at (3, 1): got 0, want 1',
  "case": {'kind': 'nest', 'case': {'ranks': ['M', 'K'], 'dims': {'M': 5, 'K': 5}, 'ops': [{'ranks': ['M', 'K'], 'spec': [[3, [[0, 0], [3, -2], [4, 2]]]], 'fmt': ['C', 'U'], 'known': True, 'proj': {}}, {'ranks': ['M', 'K'], 'spec': [[3, [[0, 0], [3, -2], [4, 2]]]], 'fmt': ['C', 'C'], 'known': False, 'proj': {}}, {'ranks': ['M', 'K'], 'spec': [[0, [[0, -2], [1, 5], [2, 0], [3, -1], [4, 2]]], [2, [[3, 5]]], [3, [[2, 5], [3, 1]]], [4, [[1, 0], [2, 5], [3, 3]]]], 'fmt': ['C', 'U'], 'known': True, 'proj': {}}], 'levels': [['and', ['or', ['f', 0], ['f', 1]], ['f', 2]], ['and', ['f', 1], ['and', ['f', 0], ['f', 2]]]], 'z': {'ranks': [], 'known': False, 'fmt': 'C', 'spec': []}, 'act': '+=', 'probes': []}, 'traces': [['M', 'iter', 'file'], ['M', 'intersect_0', 'file'], ['M', 'intersect_1', 'file'], ['M', 'union_2', 'file'], ['M', 'union_3', 'file'], ['K', 'iter', 'file'], ['K', 'intersect_0', 'file'], ['K', 'intersect_1', 'file'], ['K', 'intersect_2', 'file'], ['K', 'intersect_3', 'file']], 'flush': 2, 'flush2': 7, 'eat': 0, 'stop': None}}]
