[{"sub": 'views', "why": 'a repaired defect: library raised AssertionError:  (in fiber.py:project) on a legal input',
  "case": {'f': {'depth': 1, 'default': 0, 'own': False, 'fmt': 'C', 'shape': None, 'active': (0, 0), 'spec': [[1, 1], [2, 1]]}, 'vs': [('project', 1, -2, (0, 0), 1, None)], 'base': 'plain'}},
 {"sub": 'views', "why": 'a planted bug: f.prune(all, {}) pass 0: got [], want [0]',
  "case": {'f': {'depth': 1, 'default': 0, 'own': False, 'fmt': 'U', 'shape': None, 'active': (0, 1), 'spec': []}, 'vs': [('prune', 'all', None)], 'base': 'plain'}},
 {"sub": 'tuples', "why": 'a mutant: library raised RecursionError: maximum recursion depth exceeded (in fiber.py:iterShapeCoords) on a legal input',
  "case": {'cs': [], 'vals': [], 'fn': 'wrap', 'shape': True, 'from': 'tuple'}},
 {"sub": 'tuples', "why": 'a mutant: library raised AssertionError: The type of coordinates must match type of shape (in fiber.py:iterUncompressed) on a lega',
  "case": {'cs': [(0, 0)], 'vals': [1], 'fn': 'wrap', 'shape': True, 'from': 'tuple'}},
 {"sub": 'tuples', "why": 'a mutant: iterUncompressed: got [((0, 0), 1), ((0, 1), 0), ((0, 2), 0), ((1, 0), 0), ((1, 1), 0), ((1, 2), 0), ((2, 0), 0), ((2, 1',
  "case": {'cs': [(0, 0), (0, 1)], 'vals': [1, 1], 'fn': 'wrap', 'shape': True, 'from': 'tuple'}},
 {"sub": 'views', "why": 'a mutant: f.prune(all, {}) pass 0: got [], want [0, 1]',
  "case": {'f': {'depth': 2, 'default': 0, 'own': False, 'fmt': 'U', 'shape': None, 'active': (0, 2), 'spec': []}, 'vs': [('prune', 'all', None)], 'base': 'plain'}},
 {"sub": 'co', "why": 'a mutant: library raised IndexError: list index out of range (in iterators.py:coiterActiveShape) on a legal input',
  "case": {'fs': [{'depth': 1, 'default': 0, 'own': True, 'fmt': 'C', 'shape': None, 'active': None, 'spec': []}], 'mode': 'active', 'ref': False, 'lo': 0, 'hi': 5, 'step': 1}},
 {"sub": 'co', "why": 'a mutant: library raised IndexError: list index out of range (in iterators.py:coiterShape) on a legal input',
  "case": {'fs': [{'depth': 1, 'default': 0, 'own': False, 'fmt': 'U', 'shape': None, 'active': (0, 0), 'spec': []}], 'mode': 'shape', 'ref': False, 'lo': 0, 'hi': 0, 'step': 1}},
 {"sub": 'plain', "why": 'a mutant: library raised IndexError: list index out of range (in fiber.py:project) on a legal input',
  "case": {'f': {'depth': 1, 'default': 0, 'own': False, 'fmt': 'U', 'shape': None, 'active': None, 'spec': []}, 'mode': 'getrange', 'lo': 3, 'hi': 6, 'step': 1, 'sp': None, 'box': True, 'tick': False}},
 {"sub": 'plain', "why": "a mutant: library raised TypeError: 'Payload' object cannot be interpreted as an integer (in iterators.py:iterRange) on a legal in",
  "case": {'f': {'depth': 1, 'default': 0, 'own': True, 'fmt': 'C', 'shape': None, 'active': None, 'spec': [[0, 4]]}, 'mode': 'range', 'lo': 6, 'hi': -1, 'step': -1, 'sp': 2, 'box': True, 'tick': False}}]
