[{"sub": 'pair', "why": 'a repaired defect: coordinates of a - b: got [], want [0, 1, 2, 3]',
  "case": {'op': '-', 'a': {'depth': 1, 'default': 0, 'arity': 1, 'own': False, 'fmt': 'U', 'active': None, 'order': True, 'shape': 4, 'spec': []}, 'b': {'depth': 1, 'default': 0, 'arity': 1, 'own': False, 'fmt': 'C', 'active': None, 'order': False, 'shape': 1, 'spec': []}, 'twice': False, 'same': False}},
 {"sub": 'many', "why": "a repaired defect: library raised TypeError: unsupported operand type(s) for +: 'int' and 'tuple' (in iterators.py:<lambda>) on a legal inp",
  "case": {'kind': 'intersection', 'ops': [{'depth': 1, 'default': 0, 'arity': 1, 'own': False, 'fmt': 'C', 'active': None, 'order': False, 'shape': 1, 'spec': [[0, (1, 2)]]}, {'depth': 1, 'default': 0, 'arity': 2, 'own': False, 'fmt': 'C', 'active': None, 'order': False, 'shape': (3, 3), 'spec': [[(0, 0), (1, 2)]]}, {'depth': 1, 'default': 0, 'arity': 3, 'own': False, 'fmt': 'C', 'active': None, 'order': False, 'shape': (3, 3, 3), 'spec': [[(2, 1, 0), (1, 2)]]}], 'stale': False}},
 {"sub": 'many', "why": "a planted bug: union of 5 at 0 mask: got 'ABCDD', want 'ABCDE'",
  "case": {'kind': 'union', 'ops': [{'depth': 1, 'default': 0, 'arity': 1, 'own': False, 'fmt': 'U', 'active': None, 'order': False, 'shape': 1, 'spec': []}, {'depth': 1, 'default': 0, 'arity': 1, 'own': False, 'fmt': 'U', 'active': None, 'order': False, 'shape': 1, 'spec': []}, {'depth': 1, 'default': 0, 'arity': 1, 'own': False, 'fmt': 'U', 'active': None, 'order': False, 'shape': 1, 'spec': []}, {'depth': 1, 'default': 0, 'arity': 1, 'own': False, 'fmt': 'U', 'active': None, 'order': False, 'shape': 1, 'spec': []}, {'depth': 1, 'default': 0, 'arity': 1, 'own': False, 'fmt': 'U', 'active': None, 'order': False, 'shape': 1, 'spec': []}], 'stale': False}},
 {"sub": 'pair', "why": 'a mutant: a ^ b: an operand changed from ("[\'K\', \'N\']", \'\', \'red\', False, (\'F\', 0, 0, (), ((0, 1), ("\'K\'", 1, False, \'U\', \'Fiber\')',
  "case": {'op': '^', 'a': {'depth': 2, 'default': 0, 'arity': 1, 'own': True, 'fmt': 'U', 'active': None, 'order': True, 'shape': 1, 'spec': []}, 'b': {'depth': 1, 'default': 0, 'arity': 1, 'own': False, 'fmt': 'U', 'active': None, 'order': True, 'shape': 3, 'spec': []}, 'twice': False, 'same': False}},
 {"sub": 'pair', "why": "a mutant: library raised TypeError: '<' not supported between instances of 'NoneType' and 'int' (in iterators.py:__iter__) on a le",
  "case": {'op': '^', 'a': {'depth': 1, 'default': 0, 'arity': 1, 'own': True, 'fmt': 'U', 'active': (3, 3), 'order': True, 'shape': 6, 'spec': []}, 'b': {'depth': 1, 'default': 0, 'arity': 1, 'own': False, 'fmt': 'U', 'active': None, 'order': False, 'shape': 3, 'spec': []}, 'twice': True, 'same': False}},
 {"sub": 'pair', "why": 'a mutant: a ^ b: an operand changed from ("[\'K\', \'N\']", \'\', \'red\', False, (\'F\', 1, 1, ((0, (\'F\', 0, 0, (), ((0, 3), ("\'N\'", 3, Fal',
  "case": {'op': '^', 'a': {'depth': 2, 'default': 0, 'arity': 1, 'own': True, 'fmt': 'U', 'active': (2, 4), 'order': False, 'shape': 4, 'spec': [[0, []]]}, 'b': {'depth': 1, 'default': 0, 'arity': 1, 'own': False, 'fmt': 'U', 'active': None, 'order': False, 'shape': 1, 'spec': []}, 'twice': False, 'same': False}},
 {"sub": 'many', "why": 'a mutant: union of 3: an operand changed from ("[\'K\', \'N\']", \'\', \'red\', False, (\'F\', 0, 0, (), ((0, 1), ("\'K\'", 1, False, \'U\', \'Fi',
  "case": {'kind': 'union', 'ops': [{'depth': 2, 'default': 0, 'arity': 1, 'own': True, 'fmt': 'U', 'active': None, 'order': True, 'shape': 1, 'spec': []}, {'depth': 1, 'default': 0, 'arity': 1, 'own': True, 'fmt': 'C', 'active': None, 'order': True, 'shape': 1, 'spec': []}, {'depth': 1, 'default': 0, 'arity': 1, 'own': False, 'fmt': 'C', 'active': None, 'order': True, 'shape': 3, 'spec': [[0, 5], [1, 5], [2, -1]]}], 'stale': False}},
 {"sub": 'many', "why": "a mutant: library raised TypeError: unsupported operand type(s) for +: 'int' and 'tuple' (in iterators.py:<lambda>) on a legal inp",
  "case": {'kind': 'intersection', 'ops': [{'depth': 1, 'default': 0, 'arity': 1, 'own': True, 'fmt': 'C', 'active': None, 'order': True, 'shape': 1, 'spec': [[0, -2]]}, {'depth': 1, 'default': 0, 'arity': 2, 'own': False, 'fmt': 'C', 'active': None, 'order': False, 'shape': (3, 3), 'spec': [[(0, 0), 1], [(0, 1), 7], [(0, 2), 4], [(1, 0), 0], [(1, 1), 5], [(1, 2), -1], [(2, 0), 0]]}, {'depth': 1, 'default': 0, 'arity': 2, 'own': True, 'fmt': 'C', 'active': None, 'order': False, 'shape': (3, 3), 'spec': [[(0, 2), (3,)], [(2, 0), 0]]}, {'depth': 1, 'default': 0, 'arity': 3, 'own': False, 'fmt': 'C', 'active': None, 'order': False, 'shape': (3, 3, 3), 'spec': [[(0, 2, 2), 0], [(1, 0, 0), 1], [(1, 1, 1), 5], [(2, 0, 0), 4], [(2, 0, 1), 0], [(2, 1, 2), 5], [(2, 2, 2), 3]]}, {'depth': 2, 'default': 0, 'arity': 2, 'own': False, 'fmt': 'C', 'active': None, 'order': True, 'shape': (3, 3), 'spec': []}, {'depth': 2, 'default': 0, 'arity': 1, 'own': True, 'fmt': 'C', 'active': None, 'order': True, 'shape': 1, 'spec': [[0, [[2, 5]]]]}], 'stale': False}}]
