[{"sub": 'tuples', "why": "a repaired defect: library raised TypeError: '<=' not supported between instances of 'int' and 'tuple' (in fiber.py:updateCoords) on a lega",
  "case": {'t': {'ranks': ['M', 'K', 'N'], 'shape': None, 'dims': [1, 1, 1], 'default': 0, 'spec': []}, 'd': 0, 'ops': [('ref', [(0, 0), 0], 0, [], 0, ['none']), ('populate', [(0, 0), 0], 0, [], 0, ['none']), ('updcoords', [(0, 0), 0], 0, [], 0, ['none'])]}},
 {"sub": 'history', "why": 'a repaired defect: library raised CoordinateError:  (in fiber.py:__setitem__) on a legal input',
  "case": {'t': {'ranks': ['M'], 'shape': None, 'dims': [1], 'default': 0, 'spec': []}, 'route': 'tensor', 'ops': [('ref', (0,), 'none', 0), ('ref', (0,), 'none', 0), ('ref', (0,), 'none', 0), ('ref', (0,), 'none', 0), ('ref', (0,), 'none', 0), ('ref', (0,), 'none', 0), ('ref', (0,), 'none', 0), ('ref', (0,), 'none', 0), ('setitem', (), -1, 'same', None, 'cp')]}},
 {"sub": 'history', "why": "a planted bug: step 2 ('append', (), 0, 0, 'int'): an operation that must be rejected was accepted",
  "case": {'t': {'ranks': ['M'], 'shape': None, 'dims': [1], 'default': 0, 'spec': [], 'prov': 'grown'}, 'route': 'tensor', 'ops': [('ref', (0,), 'none', 0), ('ref', (0,), 'none', 0), ('append', (), 0, 0, 'int')]}},
 {"sub": 'history', "why": "a mutant: library raised AssertionError: Fiber coordinates in 'ordered' fibers must be monotonically increasing (in fiber.py:exten",
  "case": {'t': {'ranks': ['M', 'K'], 'shape': None, 'dims': [3, 4], 'default': 0, 'spec': [[0, [[0, 2]]], [1, [[0, 7], [1, 1], [2, 1]]]]}, 'route': 'tensor', 'ops': [('ref', (5,), 'none', 0), ('extend', (), 4, [[0, []]])]}},
 {"sub": 'history', "why": 'a mutant: after step 2 updpayloads: at (0, 0) expected a fiber, found Payload',
  "case": {'t': {'ranks': ['M', 'K', 'N'], 'shape': None, 'dims': [2, 2, 1], 'default': 0, 'spec': [[0, []]]}, 'route': 'tensor', 'ops': [('ref', (0,), 'none', 0), ('ref', (0, 0, 0), 'set', -1), ('updpayloads', 'zero'), ('clear', ())]}},
 {"sub": 'history', "why": 'a mutant: library raised IndexError: list index out of range (in fiber.py:updateCoords) on a legal input',
  "case": {'t': {'ranks': ['M', 'K', 'N'], 'shape': [4, 1, 4], 'dims': [4, 1, 4], 'default': 0, 'spec': [[0, []], [1, []], [2, []], [3, [[0, [[0, 1]]]]]]}, 'route': 'empty', 'ops': [('coiterref', (1, 5), (4, 2), 'shape', 3, 7, 1), ('imuls', (5, 2), 2), ('lookup', (0,), 8, 2), ('updcoords', 0, 'rev', False), ('updcoords', 0, 'id', True)]}},
 {"sub": 'history', "why": 'a mutant: library raised IndexError: list index out of range (in fiber.py:_create_payload) on a legal input',
  "case": {'t': {'ranks': ['M'], 'shape': None, 'dims': [5], 'default': 3, 'spec': []}, 'route': 'nest', 'ops': [('ref', (1,), 'mul', -1), ('elem', (), 1, '<<', 2), ('ref', (5,), 'sub', 1), ('updcoords', 0, 'perm', False), ('imuls', (), 1), ('populate', (), [[2, 1], [4, 0], [5, 0]], [('zclear', 0), ('set_then_0', -1), ('none', -1), ('elsewhere', 0)], None), ('imulf', (), [])]}},
 {"sub": 'history', "why": 'a mutant: after step 5 insert: fiber () has 4 coords but 5 payloads',
  "case": {'t': {'ranks': ['M', 'K', 'N'], 'shape': [3, 4, 3], 'dims': [3, 4, 3], 'default': 0, 'spec': [[2, [[2, [[0, 2]]]]]]}, 'route': 'tensor', 'ops': [('ref', (1, 5), 'add', -1), ('updpayloads', 'zero'), ('ref', (5, 8), 'set', 2), ('insert', (4,), 5, [[0, 1], [1, 0], [2, 3], [3, 1]]), ('coiterref', (), (), 'shape', 3, 6, 2), ('insert', (), 3, [[0, [[0, 2], [1, 7]]], [1, [[0, -1], [1, 0], [2, 7], [3, 0]]], [2, []], [3, [[0, 2], [1, 7], [2, 2], [3, 2]]]])]}},
 {"sub": 'history', "why": 'a mutant: library raised IndexError: list index out of range (in iterators.py:__iter__) on a legal input',
  "case": {'t': {'ranks': ['M'], 'shape': [1], 'dims': [1], 'default': 0, 'spec': []}, 'route': 'tensor', 'ops': [('imulf', (), [[0, 2], [1, 2], [3, 2], [5, -1]]), ('imuls', (), -1), ('ref', (3,), 'set', 0), ('coiterref', (), (), 'range', 1, 0, 3), ('posref', (), 2, 'pay', 5), ('coiterref', (), (), 'range', 0, 0, 2), ('assign', (), [[0, -1], [1, -1], [4, 2], [5, 0]], False), ('ref', (3,), 'add', 7), ('imuls', (), 0), ('iterref', (), 'range', 2, 4, 2, 'sub', 0), ('imulf', (), []), ('populate', (), [[0, 3], [1, 2], [2, 0], [3, 1], [4, -1]], [('zclear', 0), ('src', 3), ('set', 0), ('zclear', 2)], None)]}}]
