[{"sub": 'inplace', "why": "a repaired defect: B(0) <<= E(0): got ('CoordPayload', CoordPayload(coord=7, payload=<0>)), want ('int', 0)",
  "case": {'kind': 'B', 'a': 0, 'ops': [('<<=', 'E', 0)]}},
 {"sub": 'fibers', "why": "a repaired defect: library raised TypeError: unsupported operand type(s) for +: 'NoneType' and 'int' (in fiber.py:__add__) on a legal input",
  "case": {'own': [True, False], 'default': 0, 'shape': [2, 1, 1], 'known': False, 'kind': 'ff', 'op': '+', 'a': [[1, [[0, [[0, 5]]]]]], 'b': [], 'self': False, 'fmt': 'C', 's': 0, 'box': False, 'flat': False}},
 {"sub": 'binary', "why": "a planted bug: S(0) - B(1): got ('int', 1), want ('int', -1)",
  "case": {'op': '-', 'kinds': 'SB', 'a': 0, 'b': 1}},
 {"sub": 'binary', "why": "a mutant: library raised AttributeError: 'int' object has no attribute 'payload' (in coord_payload.py:__truediv__) on a legal inpu",
  "case": {'op': '/', 'kinds': 'ES', 'a': 0, 'b': 0}},
 {"sub": 'binary', "why": "a mutant: E(0) > E(0): got ('bool', True), want ('bool', False)",
  "case": {'op': '>', 'kinds': 'EE', 'a': 0, 'b': 0}},
 {"sub": 'binary', "why": "a mutant: E(0) // S(0): ('value', Payload(0)) but the values raise ZeroDivisionError",
  "case": {'op': '//', 'kinds': 'ES', 'a': 0, 'b': 0}},
 {"sub": 'inplace', "why": "a mutant: B(0) /= B(0): ('value', Payload(0)) but the values raise ZeroDivisionError",
  "case": {'kind': 'B', 'a': 0, 'ops': [('/=', 'B', 0)]}},
 {"sub": 'inplace', "why": "a mutant: library raised AttributeError: 'int' object has no attribute 'value' (in payload.py:__ior__) on a legal input",
  "case": {'kind': 'B', 'a': 0, 'ops': [('|=', 'S', 0)]}},
 {"sub": 'inplace', "why": "a mutant: library raised AttributeError: 'int' object has no attribute 'value' (in payload.py:__iand__) on a legal input",
  "case": {'kind': 'B', 'a': 0, 'ops': [('&=', 'S', 0)]}},
 {"sub": 'inplace', "why": "a mutant: library raised AttributeError: 'Payload' object has no attribute 'payload' (in coord_payload.py:__ior__) on a legal inpu",
  "case": {'kind': 'E', 'a': 0, 'ops': [('|=', 'B', 0)]}},
 {"sub": 'inplace', "why": 'a mutant: library raised AssertionError:  (in metrics.py:incCount) on a legal input',
  "case": {'kind': 'B', 'a': 0, 'ops': [('/=', 'B', 1)]}},
 {"sub": 'inplace', "why": "a mutant: E(0) /= E(0): ('value', CoordPayload(coord=7, payload=<0>)) but the values raise ZeroDivisionError",
  "case": {'kind': 'E', 'a': 0, 'ops': [('/=', 'E', 0)]}},
 {"sub": 'inplace', "why": "a mutant: library raised AttributeError: 'int' object has no attribute 'value' (in payload.py:__itruediv__) on a legal input",
  "case": {'kind': 'B', 'a': 0, 'ops': [('/=', 'S', 0)]}},
 {"sub": 'inplace', "why": "a mutant: library raised AttributeError: 'int' object has no attribute 'value' (in payload.py:__ifloordiv__) on a legal input",
  "case": {'kind': 'B', 'a': 0, 'ops': [('//=', 'S', 0)]}},
 {"sub": 'inplace', "why": "a mutant: E(0) //= B(0): ('value', CoordPayload(coord=7, payload=<0>)) but the values raise ZeroDivisionError",
  "case": {'kind': 'E', 'a': 0, 'ops': [('//=', 'B', 0)]}},
 {"sub": 'inplace', "why": "a mutant: E(0) &= E(2.5): ('value', CoordPayload(coord=7, payload=<0>)) but the values raise TypeError",
  "case": {'kind': 'E', 'a': 0, 'ops': [('&=', 'E', 2.5)]}},
 {"sub": 'fibers', "why": 'a mutant: library raised AssertionError: Coordinates and payloads must be same length (in fiber.py:__init__) on a legal input',
  "case": {'own': [False, False], 'default': 0, 'shape': [1], 'known': False, 'kind': 'ff', 'op': '*', 'a': [[0, 2]], 'b': [], 'self': True, 'fmt': 'C', 's': 1.5, 'box': False, 'flat': False}}]
