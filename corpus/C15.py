[{"sub": 'tuples', "why": "a planted bug: rows of the rank below of a loop over a flattened rank after another session: got [['MK_pos', 'N_pos', 'MK', 'N', 'fiber",
  "case": {'sh': [1, 1, 4], 'specs': [[[0, [[0, [[3, -1]]]]]], []], 'other': 1, 'traced': False, 'assoc': False, 'end': False}},
 {"sub": 'programs', "why": "a repaired defect: library raised KeyError: 'Compute' (in compute.py:numOps) on a legal input",
  "case": {'kind': 'kernel', 'case': {'e': {'idx': ['I'], 'ops': ['I'], 'out': ''}, 'dims': {'I': 5}, 'data': [[]], 'tiles': {'I': []}, 'rel': False, 'known': False, 'u': [], 'style': ['nested'], 'order': ['I0'], 'lead': 0, 'filter': False, 'swap': False}, 'traces': [], 'flush': 2, 'eat': 0, 'stop': None}},
 {"sub": 'programs', "why": 'a repaired defect: number of update operations: got 0, want 1',
  "case": {'kind': 'nest', 'case': {'ranks': ['M'], 'dims': {'M': 8}, 'ops': [{'ranks': ['M'], 'spec': [[3, -2]], 'fmt': ['C'], 'known': False, 'proj': {'M': ['+', 0, None]}}], 'levels': [['f', 0]], 'z': {'ranks': [], 'known': False, 'fmt': 'C', 'spec': []}, 'act': '-=', 'probes': []}, 'traces': [], 'flush': 2, 'eat': 0, 'stop': None}},
 {"sub": 'programs', "why": "a repaired defect: library raised AttributeError: type object 'Payload' has no attribute '_elementPayload' (in payload.py:__ilshift__) on a",
  "case": {'kind': 'nest', 'case': {'ranks': ['M'], 'dims': {'M': 8}, 'ops': [{'ranks': ['M'], 'spec': [[3, -2]], 'fmt': ['C'], 'known': False, 'proj': {'M': ['+', 0, None]}}], 'levels': [['f', 0]], 'z': {'ranks': [], 'known': False, 'fmt': 'C', 'spec': []}, 'act': '<<=', 'probes': []}, 'traces': [], 'flush': 2, 'eat': 0, 'stop': None}},
 {"sub": 'programs', "why": 'a repaired defect: library raised AssertionError:  (in iterators.py:__iter__) on a legal input',
  "case": {'kind': 'nest', 'case': {'ranks': ['M'], 'dims': {'M': 7}, 'ops': [{'ranks': ['M'], 'spec': [[3, -2]], 'fmt': ['C'], 'known': False, 'proj': {'M': ['+', 0, None]}}], 'levels': [['f', 0]], 'z': {'ranks': ['M'], 'known': False, 'fmt': 'C', 'spec': [[3, -2]]}, 'act': '+=', 'probes': []}, 'traces': [], 'flush': 2, 'eat': 0, 'stop': None}},
 {"sub": 'programs', "why": 'a repaired defect: iterations of rank K: got 6, want 2',
  "case": {'kind': 'nest', 'case': {'ranks': ['M', 'K'], 'dims': {'M': 5, 'K': 5}, 'ops': [{'ranks': ['K'], 'spec': [[3, -2]], 'fmt': ['C'], 'known': True, 'proj': {}}, {'ranks': ['M', 'K'], 'spec': [[0, [[0, 3], [2, -1], [3, 1]]]], 'fmt': ['C', 'C'], 'known': True, 'proj': {}}], 'levels': [['f', 1], ['xor', ['f', 0], ['f', 1]]], 'z': {'ranks': ['M'], 'known': False, 'fmt': 'C', 'spec': []}, 'act': '+=', 'probes': []}, 'traces': [['K', 'iter', 'file']], 'flush': 2, 'eat': 0, 'stop': None}},
 {"sub": 'programs', "why": 'a repaired defect: library raised AssertionError:  (in metrics.py:incIter) on a legal input',
  "case": {'kind': 'nest', 'case': {'ranks': ['M', 'K'], 'dims': {'M': 5, 'K': 5}, 'ops': [{'ranks': ['M', 'K'], 'spec': [], 'fmt': ['C', 'C'], 'known': False, 'proj': {}}, {'ranks': ['M', 'K'], 'spec': [[3, [[0, -1], [4, 2]]]], 'fmt': ['C', 'C'], 'known': False, 'proj': {}}, {'ranks': ['M', 'K'], 'spec': [], 'fmt': ['C', 'C'], 'known': False, 'proj': {'M': ['+', 0, None]}}], 'levels': [['union', ['f', 0], ['f', 1], ['f', 2]], ['and', ['f', 0], ['and', ['f', 2], ['f', 1]]]], 'z': {'ranks': [], 'known': False, 'fmt': 'C', 'spec': []}, 'act': '+=', 'probes': []}, 'traces': [], 'flush': 2, 'eat': 0, 'stop': None}},
 {"sub": 'programs', "why": 'a planted bug: number of add operations: got 0, want 4',
  "case": {'kind': 'nest', 'case': {'ranks': ['M'], 'dims': {'M': 8}, 'ops': [{'ranks': ['M'], 'spec': [[3, -2]], 'fmt': ['U'], 'known': True, 'proj': {'M': ['+', 0, None]}}], 'levels': [['f', 0]], 'z': {'ranks': [], 'known': False, 'fmt': 'C', 'spec': []}, 'act': '+=', 'probes': [], 'quiet': [(0, 0, 'occ')]}, 'traces': [], 'flush': 2, 'eat': 0, 'stop': None}},
 {"sub": 'ops', "why": 'a mutant: number of mul operations: got 2, want 1',
  "case": {'pool': [['box', 0], ['box', 0], ['elem', 0]], 'steps': [('+', 0, ['v', 0], False), ('*=', 0, ['v', 2], False)]}},
 {"sub": 'ops', "why": 'a mutant: number of mul operations: got 2, want 1',
  "case": {'pool': [['box', 0], ['box', 0], ['box', 0], ['elem', 0]], 'steps': [('+', 0, ['v', 0], True), ('+', 0, ['v', 0], True), ('&', 0, ['v', 0], False), ('+=', 0, ['v', 0], True), ('+', 1, ['v', 0], False), ('&=', 0, ['v', 3], False), ('&=', 2, ['v', 3], True), ('*', 2, ['v', 3], True)]}},
 {"sub": 'sessions', "why": "a mutant: library raised AttributeError: 'bool' object has no attribute 'append' (in metrics.py:addUse) on a legal input",
  "case": {'prog': {'kind': 'kernel', 'case': {'e': {'idx': ['I'], 'ops': ['I', 'I'], 'out': ''}, 'dims': {'I': 5}, 'data': [[], []], 'tiles': {'I': []}, 'rel': False, 'known': True, 'u': [], 'style': ['nested', 'nested', 'nested'], 'order': ['I0'], 'lead': 0, 'filter': False, 'swap': True}, 'traces': [], 'flush': 2, 'eat': 0, 'stop': None}, 'before': [{'prog': {'kind': 'kernel', 'case': {'e': {'idx': ['I'], 'ops': ['I', 'I'], 'out': ''}, 'dims': {'I': 5}, 'data': [[], []], 'tiles': {'I': []}, 'rel': False, 'known': True, 'u': [], 'style': ['nested', 'nested', 'nested'], 'order': ['I0'], 'lead': 0, 'filter': False, 'swap': True}, 'traces': [], 'flush': 2, 'eat': 0, 'stop': None}, 'extra': [], 'end': 'end', 'same': False, 'keep': False, 'collect': False}], 'drop': 4, 'api': [['matchRanks', 'Mx', 'M'], ['trace', 'M', 'iter', False], ['registerRank', 'M'], ['trace', 'M', 't0', False], ['trace', 'M', 'iter', True], ['addUse', 'M', 1, 3, 'iter', None]]}}]
